"""C25: shrinkable combinators."""
from laws import decide

TITLE = 'Shrinkable combinators carry the documented value and shrink tree'

LAWS = [
    ('shrinkable::map', 'maps the value and, recursively, every shrink', 'smap_v smap_s smap_ss'),
    ('shrinkable::mapShrinks', 'keeps the value and maps the shrinks', 'smapShrinks_v smapShrinks_s'),
    ('shrinkable::mapcat', "shrinks of the outer value first, then the inner value's, recursively",
     'smapcat_v smapcat_s smapcat_ss'),
    ('shrinkable::pair', 'shrinks one component at a time and keeps the other, recursively',
     'spair_v spair_s spair_s2 spair_ss'),
    ('shrinkable::lambda', 'value and shrinks from the callables', 'slambda_v slambda_s'),
    ('shrinkable::just', 'the given value and shrinks', 'sjust_v sjust_s sjust1_s'),
    ('shrinkable::shrink', 'shrinks of the value by the function', 'sshrink_v sshrink_s'),
    ('shrinkable::shrinkRecur', 'shrinks of the value by the function, recursively',
     'shrinkRecur_v shrinkRecur_s shrinkRecur_ss'),
    ('shrinkable::postShrink', 'own shrinks first, then those of the function applied to the value',
     'postShrink_v postShrink_s'),
    ('shrinkable::filter', 'nothing unless the value satisfies the predicate; keeps exactly the '
     'shrinks that do, recursively', 'sfilter_v sfilter_s sfilter_r'),
    ('shrinkable::immediateShrinks', 'the values of the shrinks', 'immediate'),
    ('shrinkable::all', 'whether the shrinkable and all it shrinks to satisfy the predicate', 'sall'),
    ('shrinkable::findLocalMin', 'moves to the first shrink satisfying the predicate and counts '
     'those moves', 'sfindLocalMin'),
    ('shrinkable::walkPath', 'follows the indexes of the path; nothing if one does not exist',
     'swalk0 swalk1 swalk2'),
    ('shrink::eachElement', 'every shrink of every element, in place, one at a time', 'eachElement'),
]


def run(rep, tier):
    decide(rep, 'laws', LAWS)
