"""The properties: text for properties.jsonl and MANIFEST.json."""
PROPS = []
NA = {}
ABS = 'path-sensitive abstract interpretation of the resolved AST'


def P(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': list(files),
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]}
                       if state else {})},
        'technique': technique, 'note': note})


P('C01', 'Every way a property body can end yields one correct verdict',
  'However a property ends, in its body or while its arguments are generated, exactly one verdict '
  'results and no exception reaches the caller: returning normally, true or an empty string is a '
  'success; false, a non-empty string or any thrown object is a failure; a generation failure is a '
  'discard; a thrown or returned case result keeps its own verdict. The text of a returned string, '
  'thrown string, exception or case result is part of the description.',
  ['inputs', 'programs'],
  'every property body: every return type and value, every class of thrown object, thrown from the '
  'body or from argument generation',
  'tests throw a handful of types from the body; the dispatch must be right for every type, and '
  'also for generators that give up outside the body',
  ['include/rapidcheck/detail/Property.hpp', 'src/detail/Property.cpp',
   'include/rapidcheck/gen/detail/ExecRaw.hpp'],
  [('try/catch dispatch of the property adapter', 'include/rapidcheck/detail/Property.hpp'),
   ('conversion of return values', 'src/detail/Property.cpp toCaseResult')],
  ABS + ': exception and return-value dispatch of every instantiated property adapter',
  'For every instantiation in the probe program, all paths, all listed classes of thrown objects; '
  'bodies are opaque. Trusts the exporter, the interpreter and that std functions behave as '
  'documented.')

P('C02', 'Discard beats failure beats success over all results of one test case',
  'When several results are reported during one test case, the case is a discard if any was a '
  'discard (keeping only the first discard message), else a failure if any was a failure (keeping '
  'every failure message in order), else a success (keeping the last message). All tags added '
  'during the case and any non-empty log text are delivered with the verdict.',
  ['histories'], 'every sequence of reports, tags and log writes during one test case',
  'tests report one or two results per case; the precedence must hold for every sequence',
  ['src/detail/Property.cpp', 'include/rapidcheck/detail/Property.hpp'],
  [('accumulation of reported results', 'src/detail/Property.cpp AdapterContext')],
  'typestate analysis (all verdict states and transitions) by abstract interpretation',
  'All sequences of up to three reports (four in thorough), which reach every verdict state and '
  'every transition between them; strings are tracked as ordered lists of pieces.')

P('C03', 'The search stops exactly at enough successes, first failure or too many discards',
  'A test run executes one freshly generated test case after another, each from a new split of the '
  'generator seeded with the configured seed and each announced to the listener once, until the '
  'first failing case (failure), the configured number of successes (success), or more discards '
  'than the discard ratio times that number (gave up), whichever comes first and never otherwise. '
  'The recorded failure carries the test case, size and generator state of the very case that '
  'failed, and the tags of each successful case are recorded once.',
  ['histories', 'configurations'],
  'every sequence of verdicts and every setting of the limits',
  'tests run a few verdict sequences with default limits; the accounting must be exact for all',
  ['src/detail/Testing.cpp', 'src/detail/Testing.h'],
  [('search loop', 'src/detail/Testing.cpp searchProperty')],
  'loop summary + decision table extracted by abstract interpretation',
  'One generic iteration from arbitrary counter values; its path conditions are compared with the '
  'specification over a grid covering every ordering of the compared terms.')

P('C04', 'Shrinking only ever moves to failing cases and records the exact path taken',
  'While shrinking, a candidate is accepted exactly when it fails; acceptance makes it the current '
  'case, continues with its own shrinks and appends its index among the tried siblings to the '
  'path, while any other verdict changes neither the current case nor the path. Every candidate is '
  'run and announced once, shrinking ends only when the current case has no untried shrink, and '
  'following the recorded path from the original case leads to the same case, or to nothing if '
  'the path does not exist.',
  ['histories', 'inputs'], 'every shrink tree and every assignment of verdicts to its nodes',
  'tests use a few fixed shrink trees',
  ['src/detail/Testing.cpp', 'include/rapidcheck/shrinkable/Operations.hpp',
   'include/rapidcheck/seq/Operations.hpp'],
  [('shrink loop', 'src/detail/Testing.cpp shrinkTestCase'),
   ('path replay', 'include/rapidcheck/shrinkable/Operations.hpp walkPath')],
  'loop-invariant check over a generic iteration by abstract interpretation',
  'Inductive over the shrink loop for an arbitrary candidate and verdict; path replay is checked '
  'for the listed path shapes with exact unrolling.')

P('C05', 'A failure report is complete, reproducible and describes the minimal case',
  'After a failed search the minimal case (the unshrunk case when shrinking is disabled) is run '
  'exactly once more, right after the breakpoint hook, and the report holds that run\'s '
  'description and counterexample, the number of successes, and the generator state, size and '
  'shrink path that lead to it; successful and given-up searches are reported as such with their '
  'counts, and the end of the test is announced exactly once with the returned result. Reproducing '
  'recorded data runs the case it designates and reports a failure exactly if that case fails, '
  'otherwise an error.',
  ['histories', 'configurations', 'inputs'],
  'every search outcome, shrink outcome, parameter setting and reproduction record',
  'tests compare a few end-to-end results',
  ['src/detail/Testing.cpp'],
  [('test driver', 'src/detail/Testing.cpp testProperty'),
   ('reproduction driver', 'src/detail/Testing.cpp reproduceProperty')],
  'path summaries by abstract interpretation (value numbering of every reported field)',
  'All paths of both drivers; search, shrinking and path walking are taken by their contracts '
  '(C03, C04).')

P('C06', 'Reproduce mode runs exactly the listed properties; check() is true iff success',
  'With an empty reproduction map a property is tested normally; with a non-empty one a property '
  'that is unnamed or not listed is skipped as a success with no cases, and a listed one is '
  'reproduced from its own entry, ignoring the shrink path exactly when shrinking is disabled; '
  'omitted arguments come from the global configuration and listener. A top-level check runs its '
  'property once under its description as id, prints the result once and returns true exactly '
  'when the result is a success.',
  ['configurations', 'inputs'], 'every reproduction map, test id and parameter setting',
  'tests cover a few maps; the interplay of empty map, empty id and disabled shrinking is sampled',
  ['src/Check.cpp', 'include/rapidcheck/Check.hpp'],
  [('reproduction gate', 'src/Check.cpp checkProperty'),
   ('top-level check', 'include/rapidcheck/Check.hpp rc::check')],
  'decision table extracted by abstract interpretation',
  'All paths of every overload and instantiation against the full table of the deciding facts.')

P('C07', 'Every test event reaches every listener exactly once and unchanged',
  'Each event of a test run (test case finished, shrink tried, test finished) that the composite '
  'listener receives is passed on unchanged to every listener it was built with, exactly once and '
  'in order; the default listener logs with the configured verbosity and collects reproduction '
  'data of exactly the failed tests with a non-empty id, printing it at the end iff there is any. '
  'A result reported inside a running test case counts as handled, outside it does not; the GMock '
  'listener reports every non-fatal assertion result with its message to the current test case as '
  'failure iff it failed, passes what is not handled (and every other event) unchanged to its '
  'delegate, and loses nothing when there is no delegate.',
  ['histories', 'configurations'],
  'every event, every listener set, every kind of assertion result, delegate present or not',
  'tests send one event through a fixed pair of listeners; forwarding must hold for each event, '
  'any number of listeners and each result kind',
  ['src/detail/MulticastTestListener.cpp', 'src/detail/ReproduceListener.cpp',
   'src/detail/DefaultTestListener.cpp', 'src/detail/LogTestListener.cpp',
   'src/detail/PropertyContext.cpp', 'extras/gmock/include/rapidcheck/gmock.h'],
  [('broadcast loop', 'src/detail/MulticastTestListener.cpp'),
   ('reproduction records', 'src/detail/ReproduceListener.cpp'),
   ('assertion results of GMock', 'extras/gmock/include/rapidcheck/gmock.h OnTestPartResult')],
  ABS + ': event forwarding tables per listener class and event',
  'Composite listener with 0 to 3 listeners (the loop is the same for more); all paths of every '
  'other listener method. The GTest API is taken by its documented meaning.')

P('C08', 'Framework adapters fail the test exactly if the property did not succeed',
  'Whether used through GTest, Catch, doctest or Boost.Test, an adapter that enters its section '
  'checks the property exactly once and records a failed assertion in that framework exactly when '
  'the result is anything but a success (failure, gave up or error), with the printed result as '
  'part of the failure message, and lets no exception escape. For GTest and Boost.Test the test id '
  'and description come from the full name and name of the current test, so the test can be '
  'reproduced by id. Every adapter header compiles against its framework.',
  ['configurations', 'programs'], 'every property outcome in every supported test framework',
  'the outcome of a failing adapter is a failing host test, which the host suite cannot assert; '
  'the doctest, Catch and Boost.Test adapters have no tests at all',
  ['extras/gtest/include/rapidcheck/gtest.h', 'extras/catch/include/rapidcheck/catch.h',
   'extras/doctest/include/rapidcheck/doctest.h',
   'extras/boost_test/include/rapidcheck/boost_test.h'],
  [('checkGTest', 'extras/gtest/include/rapidcheck/gtest.h'),
   ('rc::prop', 'extras/catch/include/rapidcheck/catch.h'),
   ('rc::doctest::check', 'extras/doctest/include/rapidcheck/doctest.h'),
   ('checkBoostTest', 'extras/boost_test/include/rapidcheck/boost_test.h')],
  ABS + ' of each adapter instantiated against the installed framework headers',
  'All paths; the frameworks\' own assertion classes are taken by their documented meaning.')

P('C09', 'Lazy generators, shrinkables and sequences own everything they use',
  'A Gen, Shrinkable or Seq can be stored, copied, returned and evaluated after everything it was '
  'made from has gone: whatever the library stores inside one of them, through all captures, '
  'members, bases and elements, is owned: no reference or pointer to a local, parameter or '
  '*this, no non-owning view and no iterator into somebody else\'s container; state shared between '
  'copies is never written. A copy of a sequence over a container continues at the position of '
  'its source, in its own container. Building one never moves from an object of the caller passed '
  'as an lvalue.',
  ['histories', 'programs'], 'every way of building and later evaluating them',
  'a dangling capture works as long as the temporary happens to be alive, which it is in every '
  'test that evaluates at once',
  ['include/rapidcheck/gen/*.hpp', 'include/rapidcheck/seq/*.hpp',
   'include/rapidcheck/shrinkable/*.hpp', 'include/rapidcheck/shrink/*.hpp',
   'include/rapidcheck/state/gen/*.hpp'],
  [('implementations stored in handles', 'include/rapidcheck/Gen.hpp Gen::GenImpl'),
   ('copies of ContainerSeq', 'include/rapidcheck/seq/Create.hpp'),
   ('unique containers', 'include/rapidcheck/gen/Container.hpp UniqueContainerStrategy')],
  'type-level ownership analysis of every stored implementation type, escape rule on captures, '
  'and abstract interpretation of copies of iterator holding sequences',
  'All implementation types instantiated by the library and by probes that use every public '
  'combinator with lvalue and rvalue callables. User callables are assumed to own their state.')

P('C10', 'Shared implementations live exactly as long as a handle uses them',
  'Every operation on a Gen or Shrinkable handle keeps the reference count of its implementation '
  'equal to the number of handles that point to it: copying retains exactly once, moving transfers '
  'and leaves the source empty, assignment releases the old and retains the new implementation '
  '(also on self assignment), destruction releases once and only if non-empty, and the '
  'implementation is deleted exactly when the last reference goes, never before and never used '
  'afterwards. A Seq owns its implementation alone: copies are deep, moves transfer, an empty Seq '
  'may be copied, assigned and destroyed.',
  ['histories'], 'every sequence of copy, move, assignment and destruction of handles',
  'leaks, double frees and aliasing only show under particular sequences of handle operations; '
  'the tests check a few of them on one type',
  ['include/rapidcheck/Shrinkable.hpp', 'include/rapidcheck/Gen.hpp', 'include/rapidcheck/Seq.hpp'],
  [('reference counts of Shrinkable', 'include/rapidcheck/Shrinkable.hpp'),
   ('reference counts of Gen', 'include/rapidcheck/Gen.hpp'),
   ('unique ownership of Seq', 'include/rapidcheck/Seq.hpp')],
  'ownership analysis: retain/release/delete typestate of every special member by abstract '
  'interpretation',
  'Every instantiated special member, all aliasing cases of its operands, counts 0 to 2. Atomicity '
  'of the counter type is checked, interleavings follow from single atomic read-modify-writes. '
  'Copying a moved-from Gen or Shrinkable is outside the property (no implementation).')

P('C11', 'Maybe, Variant and Any construct and destroy their payload exactly once',
  'Over every sequence of construction, copy, move, assignment (also to itself and from a value), '
  'init, reset and destruction, and when any payload operation throws, Maybe and Variant construct '
  'payloads only in empty storage, destroy each exactly once, never read or assign one that does '
  'not exist and never leak one; Maybe is true iff a payload exists, Variant\'s type is that of its '
  'payload. The payload is the value last given; copies leave the source unchanged. is, match, get, '
  'comparison and printing use the payload by its own type. Any holds one value of the decayed '
  'type made from its argument and refers to exactly it; an empty Any shows nothing.',
  ['histories', 'inputs'],
  'every operation from every state of its operands, for payloads that may throw on any operation',
  'a skipped or doubled destructor is invisible to value based tests and needs particular state '
  'transitions and throwing payloads',
  ['include/rapidcheck/Maybe.hpp', 'include/rapidcheck/detail/Variant.hpp',
   'include/rapidcheck/detail/Any.hpp', 'src/detail/Any.cpp'],
  [('storage and flag of Maybe', 'include/rapidcheck/Maybe.hpp'),
   ('storage and type index of Variant', 'include/rapidcheck/detail/Variant.hpp'),
   ('type erasure of Any', 'include/rapidcheck/detail/Any.hpp')],
  'typestate analysis of payload storage (construct, assign, destroy, read) by abstract '
  'interpretation of every member function from every state',
  'Payload types whose operations are only declared, so every construction, assignment and '
  'destruction is visible; Maybe of a copyable and a move-only payload, Variant of three '
  'alternatives. Variant\'s documented requirement (nothrow payloads) is assumed.')

P('C12', 'Exceptions of user code never terminate the program',
  'An exception thrown while generating, shrinking or walking a sequence never escapes a noexcept '
  'function: a generator that throws yields a shrinkable whose value() rethrows exactly that '
  'exception and which has no shrinks; shrinks that throw are no shrinks; a sequence whose '
  'implementation throws is over, for good. Without an exception the implementation\'s own result '
  'for the given randomness and size is passed on unchanged. No other noexcept function can reach '
  'a throw or a call of user code outside a catch-all.',
  ['inputs', 'programs'], 'every implementation and every exception it may throw at any call',
  'a missed exception terminates the process, and only if a callable throws at that very place',
  ['include/rapidcheck/Gen.hpp', 'include/rapidcheck/Shrinkable.hpp', 'include/rapidcheck/Seq.hpp'],
  [('deferred exception of Gen', 'include/rapidcheck/Gen.hpp operator()'),
   ('Shrinkable::shrinks', 'include/rapidcheck/Shrinkable.hpp'),
   ('Seq::next', 'include/rapidcheck/Seq.hpp')],
  'abstract interpretation of the boundary functions plus an interprocedural may-throw effect '
  'analysis of every noexcept function',
  'All instantiated boundary functions, all noexcept functions. Out of memory, and throwing '
  'destructors of user types, are outside the property.')

LAWS = ('equational laws decided by abstract interpretation: both sides of each law are '
        'interpreted over uninterpreted arguments and compared path by path by value number')
LAWNOTE = ('Laws are stated for opaque element types and user functions, for every path; '
           'loops by one generic iteration (results, state left and state of the next iteration). '
           'Random streams are compared up to renaming. Trusts the exporter, the interpreter, std '
           'components behaving as documented, and value semantics of the handles (C09, C10). ')

P('C13', 'Sequence combinators yield exactly the documented elements, in order',
  'For all sequences, functions and predicates: take, drop, takeWhile, dropWhile, map, zipWith, '
  'filter, join, concat, mapcat, mapMaybe, cycle, cast, repeat, just, fromContainer, iterate and '
  'range yield exactly the elements their documentation defines, in order, no element lost or '
  'repeated, Nothing from then on; length, forEach, last, contains, all, any, at, iteration and '
  'comparison of sequences compute what they say over all elements.',
  ['inputs', 'histories'], 'every sequence (also infinite ones), function, predicate and count',
  'sequences are consumed lazily and step by step; tests try a few short lists',
  ['include/rapidcheck/seq/Transform.hpp', 'include/rapidcheck/seq/Create.hpp',
   'include/rapidcheck/seq/Operations.hpp', 'include/rapidcheck/seq/SeqIterator.h'],
  [('combinators', 'include/rapidcheck/seq/Transform.hpp'),
   ('consumers', 'include/rapidcheck/seq/Operations.hpp')],
  LAWS, LAWNOTE + 'seq::index and subranges are not covered.')

P('C24', 'exec, its recipes and implicit parameters behave as documented',
  'Inside gen::exec, operator* on a generator yields the value that generator gives for the next '
  'split of the stream at the same size; parameters of the callable are arbitrary values; executing '
  'again yields the same value. Shrinks replace one dereferenced value at a time by its shrinks, '
  'keep those before it, generate those after it anew, and never return to an earlier one. '
  'operator* is refused inside generators other than exec; exec may be nested. The recipe lists '
  'every dereferenced generator with its name and value, in order. An implicit parameter has the '
  'value of its innermost binding, or its default in a new scope; bindings and scopes end with their '
  'objects, exceptions included, and leave nothing behind.',
  ['inputs', 'histories'], 'every callable of the shapes in the probe, all generators, streams, '
  'sizes, values and nestings',
  'shrinks of exec re-run the callable with another prefix; tests fix the generators and values',
  ['include/rapidcheck/gen/Exec.hpp', 'include/rapidcheck/gen/detail/ExecRaw.hpp',
   'src/gen/detail/ExecHandler.cpp', 'src/gen/detail/Recipe.cpp',
   'src/gen/detail/GenerationHandler.cpp', 'include/rapidcheck/detail/ImplicitParam.hpp',
   'src/detail/ImplicitParam.cpp', 'include/rapidcheck/detail/Any.hpp',
   'include/rapidcheck/Gen.hpp'],
  [('exec', 'include/rapidcheck/gen/detail/ExecRaw.hpp execWithRecipe'),
   ('recipes', 'src/gen/detail/Recipe.cpp shrinkRecipe'),
   ('implicit parameters', 'include/rapidcheck/detail/ImplicitParam.hpp')],
  LAWS, LAWNOTE + 'Callables of up to two dereferenced generators and up to two parameters are '
  'compared; type erasure (Any) and the stacks are modelled by what they hold.')

P('C26', 'Assertion macros end a test case exactly when and as documented',
  'RC_ASSERT fails the test case iff its expression is false, RC_ASSERT_FALSE iff it is true, RC_PRE '
  'discards it iff false, RC_SUCCEED_IF ends it as a success iff true; RC_ASSERT_THROWS fails iff '
  'nothing is thrown, RC_ASSERT_THROWS_AS iff nothing or something of another type is thrown; '
  'RC_FAIL, RC_SUCCEED and RC_DISCARD always end it, with the given message. Operands are evaluated '
  'once, for every operator and chain of operators the value is that of the expression as written, '
  'and the message names file, line, expression and the value of every operand.',
  ['inputs', 'programs'], 'all operand types and values (user defined operators included)',
  'the expression templates and messages are generic over operand types; tests use ints',
  ['include/rapidcheck/Assertions.h', 'include/rapidcheck/Assertions.hpp',
   'src/detail/Assertions.cpp', 'include/rapidcheck/detail/Capture.h'],
  [('macros', 'include/rapidcheck/Assertions.h'), ('doAssert', 'include/rapidcheck/Assertions.hpp'),
   ('captured expressions', 'include/rapidcheck/detail/Capture.h'),
   ('messages', 'src/detail/Assertions.cpp')],
  LAWS, LAWNOTE + 'Strings and streams are modelled as sequences of literals and printed values. '
  'Chains of up to two operators are compared; user operators are taken as pure.')

P('C20', 'Every command sequence generated or shrunk to is valid for the initial state',
  'Whatever commands, models and command generators do (preconditions that do not hold, that fail or '
  'throw, generators that give up or throw, applications that change the state in any way): a '
  'generated sequence of commands has every precondition satisfied in the state its predecessors '
  'lead to from the given initial state, each command was generated from exactly that state, and a '
  'generation that cannot find a next command gives up with a GenerationFailure. Shrinks '
  'are exactly such sequences too: a range removed or one command replaced by one of its shrinks, '
  'later commands that no longer fit regenerated from the state they now start in with their own '
  'random stream, otherwise left out. runAll, applyAll, isValidSequence, isValidCommand and '
  'nextState check each precondition before applying or running and stop at the first that fails.',
  ['inputs', 'programs', 'histories'],
  'every model, command type, command generator, size, random state and shrink path',
  'tests use a few models whose commands rarely invalidate one another',
  ['include/rapidcheck/state/gen/Commands.hpp', 'include/rapidcheck/state/State.hpp',
   'include/rapidcheck/state/Commands.hpp', 'include/rapidcheck/state/Command.hpp',
   'include/rapidcheck/state/gen/ExecCommands.hpp'],
  [('generation', 'include/rapidcheck/state/gen/Commands.hpp generateInitial, generateCommandBuilder'),
   ('repair of shrinks', 'include/rapidcheck/state/gen/Commands.hpp repairEntries, repairEntryAt'),
   ('running', 'include/rapidcheck/state/State.hpp, include/rapidcheck/state/Command.hpp')],
  'abstract interpretation of generation, shrinks and runs over every outcome of the user code, '
  'event logs and sequences on each path compared with a reference semantics of commands',
  'Sequences: generation in the general round of its loop; shrinks for sequences of up to four '
  'commands (five if the code holds numbers above two; larger ones are taken to be three); the '
  'shrinks of shrinks follow by the same code on valid sequences. Commands and models '
  'are unknown code with unknown outcomes that depend on the command and the state alone.')

P('C21', 'Malformed input is reported and never reads or allocates out of bounds',
  'Reading arbitrary bytes as an integer, string, pair, map, range, generator or reproduction data '
  'gives a value or throws SerializationException; arbitrary text as Base64 or a map gives a value or '
  'throws ParseException; an arbitrary configuration string gives a configuration or throws '
  'ConfigurationException, and in RC_PARAMS ends the program with an error. Nothing outside the input '
  'is read, no shift is out of range, no memory is asked for only because the input says so and every loop ends. '
  'Nothing is dropped without notice: integers that do not fit, strings that are cut short, characters '
  'outside the alphabet or left over, open quotes, text after an empty key or after a number and negative counts '
  'are rejected, a generator read has no more used bits than there are.',
  ['inputs', 'fault_sequences'], 'all byte strings and texts up to the lengths in DESIGN.md, whatever they hold',
  'tests try a few malformed strings',
  ['include/rapidcheck/detail/Serialization.hpp', 'include/rapidcheck/Random.hpp', 'src/detail/Base64.cpp',
   'src/detail/MapParser.cpp', 'src/detail/StringSerialization.cpp', 'src/detail/Configuration.cpp'],
  [('deserialize', 'include/rapidcheck/detail/Serialization.hpp, Random.hpp'),
   ('base64Decode', 'src/detail/Base64.cpp'), ('parseMap', 'src/detail/MapParser.cpp'),
   ('configFromString, loadConfiguration', 'src/detail/Configuration.cpp')],
  'bit provenance over arbitrary input of every length up to a bound: bounds, shifts, allocation sizes, '
  'exceptions and loss of input bits on all paths',
  'The readers are interpreted on input of which every bit is unknown; configurations for any text of every value. '
  'Reading numbers from text (istream) is taken to be as the standard says.')

P('C22', 'What the library writes down it reads back unchanged',
  'Every integer of every width, in the fixed and the compact format, every string, pair, map and '
  'sequence, every state of a Random generator (its current block is made again) and all '
  'reproduction data read back as they were written, consuming exactly the bytes written; Base64 '
  'decodes to what was encoded and needs no quoting; a map of non-empty keys survives being written as a string '
  'and parsed, in either quoting style, whatever characters it holds; and a configuration comes back '
  'with every member from its full string over any defaults, and from its minimal string over the '
  'defaults with any seed.',
  ['inputs', 'configurations'], 'every integer; strings, maps and sequences of the lengths DESIGN.md lists '
  'with any content; any generator state; any configuration',
  'tests round-trip random values, which reach no rare lengths, escapes, counters or members',
  ['include/rapidcheck/detail/Serialization.hpp', 'src/detail/Serialization.cpp', 'src/Random.cpp',
   'src/detail/Base64.cpp', 'src/detail/MapParser.cpp', 'src/detail/StringSerialization.cpp',
   'src/detail/Configuration.cpp', 'src/detail/Results.cpp'],
  [('serialize/deserialize', 'include/rapidcheck/detail/Serialization.hpp'),
   ('Random', 'src/Random.cpp'), ('base64Encode/base64Decode', 'src/detail/Base64.cpp'),
   ('parseMap/mapToString', 'src/detail/MapParser.cpp'),
   ('configFromString/configToString', 'src/detail/Configuration.cpp')],
  'bit provenance: an abstract domain in which every bit of a number is 0, 1, a bit of an input or '
  'a table over at most eight of them, on all paths of writing followed by reading',
  'Integers, generators and configurations are covered for all values; strings, maps, sequences and '
  'Base64 for all contents up to the lengths in DESIGN.md. Negative counts are excluded from configurations '
  '(they are rejected when read). A length is one piece whose own round trip is shown for every value.',
  )

P('C23', 'Values of the library compare equal exactly if all their parts do',
  'For every two values: test results, case results, descriptions, reproduction data, metadata, '
  'parameters and configurations compare equal exactly if all their members do (functions that '
  'give an example: if both or neither is there and they give equal examples), Random generators '
  'exactly if their whole states do, and Maybe, Variant, Seq and Shrinkable exactly if what they hold '
  'does; a Seq iterator equals the end exactly if no element is left. != is the negation of ==, and < of Random is a lexicographic order of the '
  'whole state, so that generators are usable as keys.',
  ['inputs', 'programs'], 'every two values of each type, every payload type',
  'tests compare a few values that differ in one member at a time',
  ['src/detail/Results.cpp', 'src/detail/Property.cpp', 'src/detail/TestParams.cpp',
   'src/detail/TestMetadata.cpp', 'src/detail/Configuration.cpp', 'src/Random.cpp',
   'include/rapidcheck/Maybe.hpp', 'include/rapidcheck/Seq.hpp', 'include/rapidcheck/Shrinkable.hpp',
   'include/rapidcheck/detail/Variant.hpp', 'include/rapidcheck/seq/SeqIterator.hpp'],
  [('results', 'src/detail/Results.cpp operator=='), ('generators', 'src/Random.cpp operator=='),
   ('sum types and sequences', 'include/rapidcheck/Maybe.hpp, Variant.hpp, Seq.hpp')],
  'truth tables over the comparisons of members on all paths of the operators; equational laws '
  'for the templates', 'Comparison of members of standard and user types is taken as given.')

P('C28', 'Numbers drawn from a range and elements chosen lie where they are asked to lie',
  'gen::inRange(min, max) yields, for every integer type, every pair min < max however far apart, every random '
  'number and every size, a number that is at least min and less than max, min at size 0, any of them at the '
  'nominal size, and fails with GenerationFailure exactly if max <= min; its shrinks stay in the range. '
  'Scaling a number by a size never makes it larger and is off from the exact share by at most one. '
  'shrink::towards first gives the target and then only numbers between the target and the value, never the value '
  'itself. elementOf, sizedElementOf, oneOf and weightedElement choose one of what they are given, can choose every '
  'one, weightedElement never one of weight 0 and each for as many random numbers as its weight, and fail only if '
  'there is nothing to choose. Drawing n bits takes n bits of the source, none twice, and extends '
  'them by their sign. No signed overflow and no division by zero occurs on the way.',
  ['inputs'], 'every min, max, value, target, weight and random number; sizes, numbers of elements and of bits as '
  'DESIGN.md lists',
  'tests sample ranges and sizes; boundaries of wide types, carries of 128-bit arithmetic and rare weights are not met',
  ['include/rapidcheck/gen/Numeric.hpp', 'src/gen/detail/ScaleInteger.cpp', 'include/rapidcheck/gen/Select.hpp',
   'src/detail/FrequencyMap.cpp', 'include/rapidcheck/shrink/Shrink.hpp', 'include/rapidcheck/detail/BitStream.hpp'],
  [('inRange', 'include/rapidcheck/gen/Numeric.hpp'), ('scaleInteger', 'src/gen/detail/ScaleInteger.cpp'),
   ('ElementOfGen, WeightedElementGen, SizedElementOfGen, OneOfGen', 'include/rapidcheck/gen/Select.hpp'),
   ('FrequencyMap::lookup', 'src/detail/FrequencyMap.cpp'),
   ('TowardsSeq', 'include/rapidcheck/shrink/Shrink.hpp'), ('BitStream::next', 'include/rapidcheck/detail/BitStream.hpp')],
  'abstract interpretation with affine forms over inputs, quotients and remainders, whose symbolic bounds decide '
  'inequalities for all values; bit provenance for bit streams',
  'Sizes and numbers of elements are fixed one at a time, everything else is arbitrary. The random number is any '
  '64-bit number; weights are below 2^32, so that their sum does not wrap.')

P('C29', 'Shown values list all their parts and leave the stream as it was',
  'A value is shown with its own showValue, else its operator<<, else as a placeholder. Pairs, tuples, '
  'containers, arrays, Seq (cut with "..." when very long), Maybe, Variant and command sequences '
  'show every element once, in order, between brackets, and maps every key with its value. Strings '
  'are quoted and escaped so that different strings are shown differently and with printable '
  'characters only. Null pointers are shown without reading through them. operator<< of results, '
  'descriptions, reproduction data, parameters and Random shows every member. No function that shows '
  'or prints leaves the stream in another format (flags, precision, fill) than it found it.',
  ['inputs', 'programs'], 'every value, element type and stream format',
  'tests show a few values on fresh streams',
  ['include/rapidcheck/Show.hpp', 'src/Show.cpp', 'src/detail/Results.cpp', 'src/detail/Property.cpp',
   'src/detail/TestParams.cpp', 'src/Random.cpp', 'include/rapidcheck/Seq.hpp',
   'include/rapidcheck/Maybe.hpp', 'include/rapidcheck/detail/Variant.hpp',
   'include/rapidcheck/state/Commands.hpp', 'include/rapidcheck/state/Command.hpp'],
  [('values', 'include/rapidcheck/Show.hpp'), ('strings', 'src/Show.cpp showValue'),
   ('records', 'src/detail/Results.cpp, src/detail/Property.cpp, src/detail/TestParams.cpp')],
  'abstract interpretation of the showing functions over text and stream formats, compared with '
  'the parts of the value; a table over all 256 characters for the escapes, checked to be uniquely '
  'decodable',
  'What user types write is opaque; std::locale is the classic one.')

P('C27', 'Fixtures are made, set up, torn down and destroyed once per test case',
  'Each execution of a property with a fixture (RC_GTEST_FIXTURE_PROP, its typed variant, '
  'RC_BOOST_FIXTURE_PROP, ExecFixture) constructs one fixture, sets it up, runs the body with the '
  'generated arguments, tears it down and destroys it, once each and in this order; once SetUp has '
  'returned TearDown runs also when the body throws (as every failed assertion or discard does), '
  'and no exception is swallowed.',
  ['inputs', 'fault_sequences'], 'all fixtures and property bodies, throwing from any of their functions',
  'the existing tests count the calls for fixtures that never throw',
  ['include/rapidcheck/detail/ExecFixture.h', 'extras/gtest/include/rapidcheck/gtest.h',
   'extras/boost_test/include/rapidcheck/boost_test.h'],
  [('ExecFixture::exec', 'include/rapidcheck/detail/ExecFixture.h'),
   ('RC_GTEST_FIXTURE_PROP', 'extras/gtest/include/rapidcheck/gtest.h'),
   ('RC_BOOST_FIXTURE_PROP', 'extras/boost_test/include/rapidcheck/boost_test.h')],
  'typestate over all paths of the test case functions the macros define',
  'The macro expansions are interpreted on every path with a fixture and a body any function of '
  'which may throw; the order of calls on each path is compared with the protocol.')

P('C19', 'Generator combinators combine values, sizes and shrinks as documented',
  'For all generators, functions and sizes: map, mapcat, join, apply, cast, tuple, pair, '
  'construct, makeUnique, makeShared, build and set combine the generated values as documented, '
  'each part generated with the size given; resize, scale, withSize and lazy use the documented '
  'size and generator; just, noShrink, shrink, elementOf, element, oneOf and maybe pick and shrink '
  'as documented (one component of a tuple at a time, Nothing first for maybe); arbitrary values '
  'of Maybe, pair and tuple are made of arbitrary parts.',
  ['inputs', 'programs'], 'every generator, function, size and random state',
  'a wrong size, component or shrink shows only for particular generators and sizes, and rarely '
  'in the values a test looks at',
  ['include/rapidcheck/gen/Transform.hpp', 'include/rapidcheck/gen/Tuple.hpp',
   'include/rapidcheck/gen/Build.hpp', 'include/rapidcheck/gen/Select.hpp',
   'include/rapidcheck/gen/Maybe.hpp', 'include/rapidcheck/gen/Create.hpp'],
  [('value, size and shrink plumbing', 'include/rapidcheck/gen/Transform.hpp'),
   ('tuples', 'include/rapidcheck/gen/Tuple.hpp'),
   ('building objects', 'include/rapidcheck/gen/Build.hpp')],
  LAWS, LAWNOTE + 'Weighted and sized selection: only numeric distributions differ, not covered.')

P('C25', 'Shrinkable combinators carry the documented value and shrink tree',
  'For all shrinkables and functions: map, mapShrinks, mapcat, pair, lambda, just, shrink, '
  'shrinkRecur, postShrink and filter have the documented value and, at every depth, exactly the '
  'documented shrinks in the documented order; all and findLocalMin visit the tree as documented, '
  'findLocalMin ends at a value without satisfying shrinks and counts its moves; walkPath follows '
  'the indexes or yields Nothing; eachElement shrinks one element at a time in place.',
  ['inputs', 'histories'], 'every shrinkable, function, predicate and path',
  'shrink trees are infinite and lazily built; tests look at the first levels of a few',
  ['include/rapidcheck/shrinkable/Create.hpp', 'include/rapidcheck/shrinkable/Transform.hpp',
   'include/rapidcheck/shrinkable/Operations.hpp', 'include/rapidcheck/shrink/Shrink.hpp'],
  [('shrink tree transformations', 'include/rapidcheck/shrinkable/Transform.hpp'),
   ('walking and minimising', 'include/rapidcheck/shrinkable/Operations.hpp')],
  LAWS, LAWNOTE + 'Numeric shrink strategies (towards, real, character) are not covered.')

P('C16', 'Restricted generators yield and shrink to allowed values only, or give up',
  'For every generator, predicate and size, suchThat yields the first generated value that '
  'satisfies the predicate, and of its shrinks at every depth exactly those that do; after '
  'finitely many unsuccessful tries it gives up with a GenerationFailure. nonEmpty, distinctFrom, '
  'nonZero, positive, negative and nonNegative restrict to exactly those values. Generated '
  'characters, and the characters of generated strings, are never NUL, and no character shrinks '
  'to NUL or to itself, whatever the character type.',
  ['inputs', 'programs'], 'every generator, predicate, size, random state and character type',
  'tests sample narrow characters and predicates that are satisfied within a few tries',
  ['include/rapidcheck/gen/Predicate.hpp', 'include/rapidcheck/shrinkable/Transform.hpp',
   'include/rapidcheck/gen/Text.hpp', 'include/rapidcheck/shrink/Shrink.hpp'],
  [('retry and filter', 'include/rapidcheck/gen/Predicate.hpp FilterGen'),
   ('filtered shrinks', 'include/rapidcheck/shrinkable/Transform.hpp filter'),
   ('characters', 'include/rapidcheck/gen/Text.hpp, include/rapidcheck/shrink/Shrink.hpp character')],
  LAWS + '; value range facts of characters along each path',
  LAWNOTE + 'That a loop is bounded is shown by a counter that advances and is compared.')

P('C17', 'Container generators build containers of exactly the generated elements',
  'For every container type, element generator, size and count: container(gen) has a random number '
  'of at most size elements, container(n, gen) exactly n, each generated from its own part of the '
  'random stream at the given size, and the container holds the values of all of them in order; an '
  'array has exactly N elements and any other requested count is a GenerationFailure. Shrinks are '
  'exactly the containers without one chunk of elements (where the count is not fixed), then those '
  'with one element replaced by one of its own shrinks, in place. Arbitrary containers are '
  'containers of arbitrary elements.',
  ['inputs', 'programs'],
  'every container type, element generator, count, size and random state, every shrink',
  'tests sample a few container types with integer elements',
  ['include/rapidcheck/gen/Container.hpp', 'include/rapidcheck/shrink/Shrink.hpp',
   'include/rapidcheck/gen/detail/ShrinkValueIterator.h'],
  [('element generation', 'include/rapidcheck/gen/Container.hpp generateShrinkables'),
   ('container assembly', 'include/rapidcheck/gen/Container.hpp ContainerHelper'),
   ('chunk removal', 'include/rapidcheck/shrink/Shrink.hpp removeChunks')],
  LAWS, LAWNOTE + 'Chunk removal is compared for the first three shrinks of any container; '
  'distribution of the element count is not covered.')

P('C18', 'Sets, maps and unique containers keep distinct keys through every shrink',
  'Sets, maps, their unordered forms and containers made by unique or uniqueBy are built of exactly '
  'the requested number of elements with pairwise distinct keys: an element whose key is taken is '
  'generated anew, and after finitely many tries generation gives up with a GenerationFailure. No '
  'shrink changes that: an element is replaced only by a shrink whose key is its own or not taken '
  'by any other element. The multi variants keep every generated element.',
  ['inputs', 'programs'],
  'every element generator (also those that repeat themselves), key function, size and shrink path',
  'key collisions between shrinks of different elements are rare in sampled trees',
  ['include/rapidcheck/gen/Container.hpp'],
  [('sets', 'include/rapidcheck/gen/Container.hpp GenericContainerStrategy<Set>'),
   ('maps', 'include/rapidcheck/gen/Container.hpp GenericContainerStrategy<Map>'),
   ('unique', 'include/rapidcheck/gen/Container.hpp UniqueContainerStrategy')],
  LAWS, LAWNOTE + 'The shrink filter is decided for every single element against the keys of all '
  'elements.')

P('C15', 'Parts of a generated value come from disjoint random streams',
  'No library generator, nor the loop that runs test cases, uses the same random stream for two '
  'things: on every path and over all rounds of every loop a Random is split, drawn from or passed '
  'on at most once, and one that numbers were drawn from is never split. split gives two generators '
  'whose positions differ, for any number of splits; next never repeats a word of a block; '
  'generators made from different seeds or keys differ; the block function is Threefish-256 of '
  'position and counter under the key. Drawing some bits of a number never uses a bit twice.',
  ['inputs', 'histories'],
  'every component generator, every number of splits, draws and bits, every key and seed',
  'correlated parts look random in any sample; wrap-around needs 64 splits or 2^64 draws',
  ['src/Random.cpp', 'include/rapidcheck/detail/BitStream.hpp', 'src/detail/Testing.cpp',
   'include/rapidcheck/gen/Tuple.hpp', 'include/rapidcheck/gen/Select.hpp',
   'include/rapidcheck/gen/Container.hpp', 'include/rapidcheck/gen/Predicate.hpp',
   'include/rapidcheck/state/gen/Commands.hpp', 'src/gen/detail/ExecHandler.cpp'],
  [('splitting', 'src/Random.cpp split, append'),
   ('block function', 'src/Random.cpp mash'),
   ('stream use in generators', 'include/rapidcheck/gen/*.hpp'),
   ('bit stream', 'include/rapidcheck/detail/BitStream.hpp next')],
  'linearity analysis of random streams by abstract interpretation (value numbers, loop rounds); '
  'term normal form equality of the block function with a reference',
  'Shrinks may reuse the stream of what they replace. The statistical quality of Threefish is '
  'outside. Two streams with different value numbers are taken to be different.')

P('C14', 'Equal configuration and seed give identical runs: no hidden input',
  'Test cases, shrinks, verdicts and reports are determined by the property and the configuration '
  '(seed included). Only the loading of the configuration consults anything that varies between '
  'runs (random device, clock, environment, thread or process identity, addresses), and no '
  'generator, shrink, sequence or engine function consults the global configuration. Nothing '
  'survives from one call to the next: no static variable is written after its initialisation or '
  'initialised from the arguments of a first call, nothing changes behind a const interface. No '
  'scalar is read before it has been given a value, and no result depends on the order in which a '
  'compiler evaluates operands.',
  ['inputs', 'histories', 'programs'],
  'all earlier runs in the same process, all build modes and compilers, every seed and property',
  'a test run sees one history, one memory layout and one compiler; garbage is often zero',
  ['src/detail/Testing.cpp', 'src/detail/Configuration.cpp', 'src/Check.cpp', 'src/Random.cpp',
   'include/rapidcheck/gen', 'include/rapidcheck/shrink/Shrink.hpp',
   'include/rapidcheck/detail/ImplicitParam.h'],
  [('configuration', 'src/detail/Configuration.cpp loadConfiguration'),
   ('search', 'src/detail/Testing.cpp searchProperty, doTestProperty'),
   ('generators and shrinks', 'include/rapidcheck/gen, include/rapidcheck/shrink')],
  'whole program effect analysis (sources of variation, writes to static storage), definite '
  'assignment dataflow of scalars and members, operand interference check',
  'User callables, custom generators and output operators are taken to be deterministic. A callee '
  'that gets a variable by non-const reference is taken to assign it. The implicit parameter stacks '
  'are the one exception from the rule on static variables.')
