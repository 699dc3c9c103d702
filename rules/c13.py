"""C13: the sequence combinators compute the documented sequences."""
from laws import decide

TITLE = 'Sequence combinators yield exactly the documented elements, in order'

LAWS = [
    ('seq::take', 'the first n elements', 'qtake qtake1 qtake2 qtake3'),
    ('seq::drop', 'all but the first n elements', 'qdrop qdrop_n'),
    ('seq::takeWhile', 'the longest prefix whose elements satisfy the predicate',
     'qtakeWhile qtakeWhile2'),
    ('seq::dropWhile', 'everything from the first element not satisfying the predicate on',
     'qdropWhile qdropWhile2 qdropWhile3'),
    ('seq::map', 'the mapped elements, in order', 'qmap qmap2 qmap0'),
    ('seq::zipWith', 'elements combined pairwise until one sequence ends',
     'qzipWith qzipWith2 qzipWith0'),
    ('seq::filter', 'exactly the elements satisfying the predicate', 'qfilter'),
    ('seq::join', 'the elements of the inner sequences, one after another', 'qjoin'),
    ('seq::concat', 'all elements of each sequence in turn', 'qconcat qconcat2 qconcat3'),
    ('seq::mapcat', 'the elements of the mapped sequences, one after another', 'qmapcat'),
    ('seq::mapMaybe', 'the values of the mapped elements that have one', 'qmapMaybe'),
    ('seq::cycle', 'the sequence over and over', 'qcycle'),
    ('seq::cast', 'the elements, converted', 'qcast qcast2'),
    ('seq::repeat', 'the value for ever', 'qrepeat'),
    ('seq::just', 'exactly the given values', 'qjust qjust2 qjust3'),
    ('seq::fromContainer', 'the elements of the container', 'qfrom'),
    ('seq::iterate', 'x, f(x), f(f(x)), ...', 'qiterate qiterate2 qiterate3'),
    ('seq::range', 'the numbers from start up or down to, not including, end', 'qrange qrange2'),
    ('seq::length', 'the number of elements', 'qlength'),
    ('seq::forEach', 'calls the function once per element, in order', 'qforEach'),
    ('seq::last', 'the last element', 'qlast'),
    ('seq::contains', 'whether some element equals the value', 'qcontains'),
    ('seq::all', 'whether all elements satisfy the predicate', 'qall'),
    ('seq::any', 'whether some element satisfies the predicate', 'qany'),
    ('seq::at', 'the element with that index', 'qat'),
    ('seq::SeqIterator::operator++', 'iterators visit the elements in order', 'qiter qiter1'),
    ('operator==', 'sequences are equal iff their elements are, pairwise and in number', 'qequal'),
]


def run(rep, tier):
    decide(rep, 'laws', LAWS)
