"""C18: sets, maps and unique containers."""
from laws import bounded, decide

TITLE = 'Sets, maps and unique containers keep distinct keys through every shrink'

LAWS = [
    ('gen::detail::GenericContainerStrategy::generateElements', 'exactly the requested number of '
     'elements whose keys are all distinct, each the first generated one not yet taken',
     'setElems usetElems mapElems'),
    ('gen::detail::GenericContainerStrategy::shrinkElements', 'an element is only replaced by a '
     'shrink whose key is its own or not taken', 'setShrink setShrinks mapShrink mapShrinks'),
    ('gen::detail::UniqueContainerStrategy::generateElements', 'exactly the requested number of '
     'elements with distinct keys', 'uniqElems'),
    ('gen::detail::UniqueContainerStrategy::shrinkElements', 'an element is only replaced by a '
     'shrink whose key is its own or not taken', 'uniqShrink uniqShrinks'),
    ('gen::uniqueBy', 'unique and uniqueBy use the unique strategy with the given key',
     'uniqBy uniqByN uniq uniqN'),
    ('gen::detail::MultiMapStrategy::generateElements', 'multi containers keep every element',
     'msetElems umsetElems mmapElems ummapElems'),
    ('gen::detail::CollectionStrategy::shrinkElements', 'multi containers shrink like sequences',
     'msetShrink mmapShrink'),
    ('gen::container', 'containers use the strategy of their type', 'wset wsetwset aset auset amap '
     'aumap'),
    ('gen::detail::generateShrinkables', 'elements refused by the predicate are generated anew, '
     'finitely often', 'genN'),
]


def run(rep, tier):
    decide(rep, 'laws', LAWS)
    bounded(rep, [('gen::detail::generateShrinkables', 'genN')])
