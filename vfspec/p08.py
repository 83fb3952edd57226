"""P08: numbers keep their value through every notation."""
from . import Spec
from .api import check, raises, assume, num_eq


def tools():
    import autosar.xml
    return autosar.xml.Writer(), autosar.xml.Reader()


def int_text(n):
    w, r = tools()
    t = w._format_number(n)
    check(t == str(n), 'an integer is written in decimal, with all digits')
    got = r._read_number(t)
    check(got == n and isinstance(got, int), 'an integer is read back exactly')
    check(r._read_integer(t) == n, 'an integer is read back exactly')


def float_text(f):
    w, r = tools()
    check(num_eq(r._read_number(w._format_float(f)), f), 'a float is read back exactly')
    check(num_eq(r._read_number(w._format_number(f)), f), 'a float is read back exactly')


def bool_text(b):
    w, r = tools()
    check(w._format_boolean(b) == ('true' if b else 'false'), 'booleans are written as true and false')
    check(r._read_boolean(w._format_boolean(b)) is b, 'a boolean is read back')


def bool_forms():
    w, r = tools()
    check(r._read_boolean('1') is True, '1 is true')
    check(r._read_boolean('0') is False, '0 is false')
    check(r._read_boolean('true') is True, 'true is true')
    check(r._read_boolean('false') is False, 'false is false')


def bool_unknown(t):
    import autosar.xml.exception as ar_exception
    w, r = tools()
    assume(t != '1')
    assume(t != '0')
    assume(t != 'true')
    assume(t != 'false')
    check(raises(ar_exception.ParseError, r._read_boolean, t), 'other texts are no booleans')


def numerical(fmt):
    def spec(n):
        import autosar.xml.element as ar_element
        import autosar.xml.enumeration as ar_enum
        w, r = tools()
        v = ar_element.NumericalValue(n, getattr(ar_enum.ValueFormat, fmt))
        check(v.value == n, 'the value is kept')
        check(v.value_format is getattr(ar_enum.ValueFormat, fmt), 'the notation is kept')
        t = w._format_number(v)
        check(num_eq(ar_element.NumericalValue(t).value, n), 'the text denotes the value')
        check(num_eq(r._read_number(t), n), 'the reader reads the value')
    return spec


def notation(form, name):
    def spec(n):
        import autosar.xml.element as ar_element
        import autosar.xml.enumeration as ar_enum
        w, r = tools()
        t = format(n, form)
        check(r._read_number(t) == n, 'the reader understands the notation')
        v = ar_element.NumericalValue(t)
        check(v.value == n, 'the notation is understood')
        if name is not None and n >= 0:
            check(v.value_format is getattr(ar_enum.ValueFormat, name), 'the notation is remembered')
            check(ar_element.NumericalValue(w._format_number(v)).value == n, 'written again with the same value')
    return spec


def prefix(n, fmt):
    """Hexadecimal and binary values are written in that notation."""
    import autosar.xml.element as ar_element
    import autosar.xml.enumeration as ar_enum
    w, r = tools()
    check(w._format_number(ar_element.NumericalValue(n, ar_enum.ValueFormat.HEXADECIMAL)) == format(n, '#x'), 'hexadecimal')
    check(w._format_number(ar_element.NumericalValue(n, ar_enum.ValueFormat.BINARY)) == format(n, '#b'), 'binary')


def positive(n):
    import autosar.xml.element as ar_element
    if n < 0:
        check(raises(ValueError, ar_element.PositiveIntegerValue, n), 'negative numbers are rejected')
        check(raises(ValueError, ar_element.PositiveIntegerValue, str(n)), 'negative numbers are rejected')
        v = ar_element.PositiveIntegerValue(1)
        check(raises(ValueError, set_value, v, n), 'negative numbers are rejected')
    else:
        check(ar_element.PositiveIntegerValue(n).value == n, 'the value is kept')
        check(ar_element.PositiveIntegerValue(str(n)).value == n, 'the text is understood')
        check(ar_element.PositiveIntegerValue(hex(n)).value == n, 'hexadecimal text is understood')
        v = ar_element.PositiveIntegerValue(1)
        v.value = n
        check(v.value == n, 'the value is kept')


def set_value(v, n):
    v.value = n


def setter(n, m):
    import autosar.xml.element as ar_element
    v = ar_element.NumericalValue(n)
    v.value = m
    check(v.value == m, 'the new value is kept')


def special():
    w, r = tools()
    check(w._format_float(float('inf')) == 'INF' and w._format_float(float('-inf')) == '-INF', 'infinities as in AUTOSAR')
    check(r._read_number('INF') == float('inf') and r._read_number('-INF') == float('-inf'), 'infinities as in AUTOSAR')
    check(w._format_float(float('nan')) == 'NaN' and r._read_number('NaN') != r._read_number('NaN'), 'not a number')
    check(w._format_float(-0.0) in ('0', '-0', '-0.0', '0.0') and r._read_number(w._format_float(-0.0)) == 0, 'negative zero')


def wrong_type(t):
    import autosar.xml.element as ar_element
    w, r = tools()
    check(raises(TypeError, w._format_number, t), 'a text is no number')
    check(raises(TypeError, w._format_number, None), 'nothing is no number')
    check(raises(TypeError, ar_element.NumericalValue, None), 'nothing is no number')
    check(raises((AssertionError, TypeError), w._format_boolean, t), 'a text is no boolean')


def not_a_number(t):
    import autosar.xml.exception as ar_exception
    w, r = tools()
    check(raises(ar_exception.ParseError, r._read_integer, t), 'a word is no integer')


NUM = ('or', 'int', 'float')


def limits(lo, hi):
    """The same through the public entry points."""
    import autosar.xml
    import autosar.xml.element as ar_element
    e = ar_element.CompuScale(lower_limit=lo, upper_limit=hi)
    got = autosar.xml.Reader().read_str_elem(autosar.xml.Writer().write_str_elem(e))
    check(num_eq(got.lower_limit, lo), 'the lower limit is kept')
    check(num_eq(got.upper_limit, hi), 'the upper limit is kept')


def value(n):
    import autosar.xml
    import autosar.xml.element as ar_element
    e = ar_element.NumericalValueSpecification(value=n)
    got = autosar.xml.Reader().read_str_elem(autosar.xml.Writer().write_str_elem(e))
    check(num_eq(got.value, n), 'the value is kept')


def value_notation(form):
    def spec(n):
        import autosar.xml
        text = '<NUMERICAL-VALUE-SPECIFICATION><VALUE>%s</VALUE></NUMERICAL-VALUE-SPECIFICATION>' % format(n, form)
        check(autosar.xml.Reader().read_str_elem(text).value == n, 'the reader understands the notation')
    return spec


def specs():
    import autosar.xml.writer as w
    import autosar.xml.reader as r
    out = []
    if all(hasattr(w.Writer, n) for n in ('_format_number', '_format_float', '_format_boolean')) and \
            all(hasattr(r.Reader, n) for n in ('_read_number', '_read_integer', '_read_boolean')):
        out += [Spec('integers', int_text, [('n', 'int')], samples=200),
                Spec('floats', float_text, [('f', 'float')], samples=3000),
                Spec('booleans', bool_text, [('b', 'bool')]),
                Spec('boolean texts', bool_forms, []),
                Spec('boolean texts, unknown', bool_unknown, [('t', 'str')]),
                Spec('special values', special, []),
                Spec('wrong types', wrong_type, [('t', 'word')]),
                Spec('not a number', not_a_number, [('t', 'word')]),
                Spec('notation prefix', lambda n: prefix(n, None), [('n', 'int')], samples=200)]
        for f in ('DEFAULT', 'DECIMAL', 'HEXADECIMAL', 'BINARY', 'SCIENTIFIC'):
            out.append(Spec('numerical value, %s' % f.lower(), numerical(f), [('n', NUM)], samples=600))
        for form, name in (('d', None), ('#x', 'HEXADECIMAL'), ('#b', 'BINARY')):
            out.append(Spec('notation %s' % form, notation(form, name), [('n', 'int')], samples=300))
    out += [Spec('positive integer', positive, [('n', 'int')], samples=200),
            Spec('new value', setter, [('n', NUM), ('m', NUM)], samples=100),
            Spec('limits', limits, [('lo', NUM), ('hi', NUM)], samples=300),
            Spec('value', value, [('n', NUM)], samples=600)]
    for form in ('d', '#x', '#b'):
        out.append(Spec('value in notation %s' % form, value_notation(form), [('n', 'int')], samples=200))
    return out
