"""Shared generators"""
import functools, unicodedata
from hypothesis import strategies as st

ASCII_LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
MARKS = '\u0300\u0301\u0308\u0323\u093c\u093f\u094d\u0e34\u05b4\u1dc4\u20dd\u1b35\u11315\u3099'
INVIS = '\u200c\u200d\u00ad\u2060\ufeff\u3164\u115f\ufe0f\u06dd\u180b\u00a0\u2003\u200a\u3000 '
PUA = '\ue000\uf8ff\U000f0000\U000fff80\U000ffffd\U00100000\U0010fffd'
USYNTAX = '[]{}\\&-|^$:'
LETTERS = 'abcdegnxyzñéßıŋɓàçöƒʼꞌдяאבعقकखฅขกㄱ가漢𐐷𞤢'


@functools.lru_cache(None)
def anychar():
    """Any Unicode scalar value, biased towards the classes the code treats specially"""
    return st.one_of(
        st.sampled_from(LETTERS), st.sampled_from(USYNTAX), st.sampled_from(MARKS), st.sampled_from(INVIS),
        st.sampled_from(PUA), st.sampled_from('0123456789.,;()<>=/*"\'#~_ǅ'),
        st.characters(exclude_categories=('Cs',)))


@functools.lru_cache(None)
def xmlchars(extra=''):
    """Characters XML can carry unescaped (no control characters)"""
    return st.one_of(
        st.sampled_from(LETTERS + ASCII_LETTERS), st.sampled_from('&<>"\'' + extra), st.sampled_from(MARKS + '\u200d\u00a0'),
        st.characters(exclude_categories=('Cs', 'Cc'), exclude_characters='\ufffe\uffff\u2028\u2029\x85'))
