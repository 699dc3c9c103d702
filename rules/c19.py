"""C19: generator combinators."""
from laws import decide

TITLE = 'Generator combinators combine values, sizes and shrinks as documented'

LAWS = [
    ('gen::resize', 'uses the given size', 'resize'),
    ('gen::scale', 'uses the scaled size', 'scale'),
    ('gen::withSize', 'passes the current size to the callable', 'withSize'),
    ('gen::lazy', 'uses the generator the callable returns', 'lazy'),
    ('gen::noShrink', 'keeps the value and has no shrinks', 'noShrink_v noShrink_s'),
    ('gen::map', 'maps the value and every shrink', 'map_v map_s'),
    ('gen::mapcat', 'generates with the generator made from the value, with the same size; shrinks '
     'the outer value first', 'mapcat_v mapcat_s'),
    ('gen::join', 'generates with the generated generator, with the same size', 'join_v join_s'),
    ('gen::apply', 'passes the generated values in order', 'apply_v'),
    ('gen::cast', 'converts the value', 'cast_v'),
    ('gen::tuple', 'generates each component with the same size; shrinks one component at a time, '
     'keeping the others', 'tuple_v tuple_s tuple_s2 tuple_ss'),
    ('gen::pair', 'generates both components with the same size', 'pair_v'),
    ('gen::just', 'always the same value, without shrinks', 'just_v just_s'),
    ('gen::shrink', "the generator's shrinks, then those of the function applied to its value",
     'shrink_v shrink_s'),
    ('gen::construct', 'constructs from the generated arguments, in order',
     'construct_v arbConstruct'),
    ('gen::makeUnique', 'constructs from the generated arguments, in order', 'makeUnique_v'),
    ('gen::makeShared', 'constructs from the generated arguments, in order', 'makeShared_v'),
    ('gen::build', 'sets exactly the named members on the built object, each to its own generated '
     'value', 'build_v build2_v build3_v arbSet'),
    ('gen::elementOf', 'one of the elements, not shrinking; gives up if there are none',
     'elementOf_v elementOf_s failing_v'),
    ('gen::element', 'one of the given elements', 'element_v'),
    ('gen::oneOf', 'one of the generators, with the same size and with its shrinks',
     'oneOf_v oneOf'),
    ('gen::maybe', 'Nothing, or a generated value that shrinks to Nothing first',
     'maybe_v maybe_s maybe_s2 maybe_s2s'),
    ('gen::arbitrary', "the arbitrary generator of a type, its parts' for Maybe, pair and tuple",
     'arb arbMaybe arbPair arbTuple arbMap'),
]


def run(rep, tier):
    decide(rep, 'laws', LAWS)
