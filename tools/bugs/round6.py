H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum

V = ar_element.ValueSpecification


'''
E = 'xml/element.py'
BUGS = [
    dict(id='B39', property='P20',
         edits=[(E, """        fields = []
        for value in values:
            fields.append(ValueSpecification.make_value(value))
        return RecordValueSpecification(label, fields)""", """        fields = []
        for value in values:
            field = ValueSpecification.make_value(value)
            if field.label is not None or not isinstance(field, NotAvailableValueSpecification):
                fields.append(field)
        return RecordValueSpecification(label, fields)""")],
         demo=H + '''x = V.make_value(["R", 1, None, 2])
assert len(x.fields) == 3
assert isinstance(x.fields[1], ar_element.NotAvailableValueSpecification)
''',
         needs='a record value with a field that is not available and has no label', breaks='the field is left out, so the following ones take the place of others'),
    dict(id='B40', property='P20',
         edits=[(E, """        compu_scales = []
        for i, elem in enumerate(elements):
            label = None
            if""", """        compu_scales = []
        label = None
        for i, elem in enumerate(elements):
            if""")],
         demo=H + '''x = ar_element.Computation.make_value_table(["Off", (3, 7)])
assert x.compu_scales[0].label == "Off"
assert x.compu_scales[1].label is None
''',
         needs='a table with a number after a text', breaks='the number gets the label of the text before it'),
    dict(id='B41', property='P20',
         edits=[(E, """        self.compu_scales = compu_scales
        self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
        if isinstance(default_value, CompuConst):
            self.default_value = default_value
        elif isinstance(default_value, (int, float, str)):
            self""", """        self.compu_scales = compu_scales
        self.default_value: CompuConst | int | float | str | None = None  # .COMPU-DEFAULT-VALUE
        if isinstance(default_value, CompuConst):
            self.default_value = default_value
        elif default_value and isinstance(default_value, (int, float, str)):
            self""")],
         demo=H + '''x = ar_element.Computation.make_rational(2, 1, default_value=0)
assert x.default_value is not None and x.default_value.value == 0
''',
         needs='a conversion whose default value is 0', breaks='the conversion has no default value'),
    dict(id='B42', property='P20',
         edits=[(E, """            return self.sw_data_def_props.variants[0].is_queued
        return False""", """            return any(variant.is_queued for variant in self.sw_data_def_props)
        return False""")],
         demo=H + '''C = ar_element.SwDataDefPropsConditional
Q = ar_enum.SwImplPolicy
x = ar_element.VariableDataPrototype("A", sw_data_def_props=ar_element.SwDataDefProps([C(impl_policy=Q.STANDARD), C(impl_policy=Q.QUEUED)]))
assert not x.is_queued
''',
         needs='a data element with two variants of its properties of which only the second is queued', breaks='the data element counts as queued'),
    dict(id='B43', property='P20',
         edits=[(E, """        numerator = [offset, float(scaling_factor)]
        denominator = [1]
        compu_scales = [CompuScale(CompuRational(numerator, denominator),
                                   lower_limit,
                                   upper_limit,
                                   lower_limit_type=lower_limit_type,
                                   upper_limit_type=upper_limit_type)]""", """        numerator = [offset, float(scaling_factor)]
        denominator = [1]
        if lower_limit is None and upper_limit is None:
            compu_scales = [CompuScale(CompuRational(numerator, denominator))]
        elif lower_limit is None:
            compu_scales = [CompuScale(CompuRational(numerator, denominator),
                                       upper_limit=upper_limit,
                                       upper_limit_type=upper_limit_type)]
        else:
            compu_scales = [CompuScale(CompuRational(numerator, denominator),
                                       lower_limit,
                                       upper_limit,
                                       lower_limit_type=lower_limit_type,
                                       upper_limit_type=lower_limit_type if upper_limit is None else upper_limit_type)]""")],
         demo=H + '''T = ar_enum.IntervalType
x = ar_element.Computation.make_rational(2, 1, 0, None, lower_limit_type=T.OPEN, upper_limit_type=T.CLOSED)
assert x.compu_scales[0].upper_limit_type == T.CLOSED
''',
         needs='a conversion with only one limit and different kinds of limits', breaks='the kind of the limit that is not given is that of the other'),
]
