"""C26: the assertion macros."""
from texts import *
import laws

TITLE = 'Each assertion macro ends the test case exactly when and as documented'

LAWS = [
    ('detail::doAssert', 'RC_ASSERT fails the test case iff the operation yields false, and shows '
     'both operands and the operator',
     'mul div rem plus minus lsh rsh lt gt ge le eq ne and xor or land lor'),
    ('detail::doAssert', 'RC_ASSERT fails the test case iff a chain of operations yields false, and '
     'shows every operand', 'chainOr chainAnd chainLt'),
    ('detail::doAssert', 'RC_ASSERT fails the test case iff the value is false, and shows it',
     'assert assertB'),
    ('detail::doAssert', 'RC_ASSERT_FALSE fails the test case iff the value is true, and shows it',
     'assertFalse assertFalseB assertFalseEq'),
    ('detail::doAssert', 'RC_SUCCEED_IF ends the test case as a success iff the value is true',
     'succeedIf succeedIfB succeedIfEq'),
    ('detail::doAssert', 'RC_PRE discards the test case iff the value is false',
     'pre preB preEq'),
    ('detail::doAssert', 'operands are evaluated exactly once', 'once onceE'),
    ('detail::makeMessage', 'RC_FAIL fails the test case with the message', 'fail failLit fail0'),
    ('detail::makeMessage', 'RC_SUCCEED ends the test case as a success with the message',
     'succeed succeedLit succeed0'),
    ('detail::makeMessage', 'RC_DISCARD discards the test case with the message',
     'discard discardLit discard0'),
    ('detail::makeUnthrownExceptionMessage', 'RC_ASSERT_THROWS fails the test case iff nothing is '
     'thrown', 'throws throwsYes throwsInt throwsCase'),
    ('detail::makeWrongExceptionMessage', 'RC_ASSERT_THROWS_AS fails the test case iff nothing, or '
     'something else, is thrown', 'as asYes asNo asBase'),
]


def run(rep, tier):
    laws.decide(rep, 'lmac', LAWS, 'probe/p_macro', Text)
