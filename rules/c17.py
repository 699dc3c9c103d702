"""C17: container generators."""
from laws import decide

TITLE = 'Container generators build containers of exactly the generated elements'

LAWS = [
    ('gen::detail::ContainerHelper::generate', 'a random number of elements up to the size, or '
     'exactly the given number; the container made of them, which shrinks by the strategy',
     'contGen_v contGen_s contN_v contN_s contN_ss'),
    ('gen::detail::toContainer', 'all the elements, in order', 'shrinkIter shrinkIter2 shrinkIter3 '
     'shrinkIter4 listElems'),
    ('gen::detail::generateShrinkables', 'that many generated elements, each from its own part of '
     'the random stream', 'genN vecElems mapElems'),
    ('gen::detail::CollectionStrategy::shrinkElements', 'chunks removed, then every shrink of every '
     'element in place', 'vecShrink'),
    ('gen::container', 'container() and container(n) use the strategy of the container type',
     'wvec wvecwvec wset wsetwset wmmap wmmapwmmap'),
    ('gen::detail::ContainerHelper::generate', 'arrays have exactly N elements, shrink element wise',
     'array arrayN arrayS'),
    ('shrink::removeChunks', 'the container without each contiguous chunk', 'chunks1 chunks2 chunks3'),
    ('shrink::eachElement', 'every shrink of every element, in place, one at a time', 'eachElement'),
    ('gen::arbitrary', 'arbitrary containers are containers of arbitrary elements',
     'avec adeque alist aflist aset amset auset aumset aarray amap ammap aumap aummap'),
]


def run(rep, tier):
    decide(rep, 'laws', LAWS)
