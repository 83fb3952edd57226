H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum


def back(e, *tag):
    text = autosar.xml.Writer().write_str_elem(e, *tag)
    return autosar.xml.Reader().read_str_elem(text)


'''
W, R, E = 'xml/writer.py', 'xml/reader.py', 'xml/element.py'
BUGS = [
    dict(id='B01', property='P01',
         edits=[(R, '            interval_type = ar_enum.IntervalType.CLOSED\n        limit =', '            interval_type = ar_enum.IntervalType.CLOSED\n        limit ='),
                (W, '        if elem.mask is not None:\n            self._add_content("MASK", str(elem.mask))\n        if elem.lower', '        if elem.mask:\n            self._add_content("MASK", str(elem.mask))\n        if elem.lower')],
         demo=H + '''
e = ar_element.CompuScale(mask=0, lower_limit=1, upper_limit=1, content="Off")
assert back(e).mask == 0
''', needs='a computation scale whose mask is exactly zero', breaks='a zero mask is not written'),
    dict(id='B02', property='P01',
         edits=[(R, '                sw_alignment = int(xml_child.text, 0)\n', '                sw_alignment = int(xml_child.text, 0) & ~0x1000\n')],
         demo=H + '''
e = ar_element.SwDataDefPropsConditional(alignment=4096)
assert back(e).alignment == 4096
''', needs='alignment value with one particular bit set', breaks='alignments of 4096 and above are read back wrongly'),
    dict(id='B03', property='P02',
         edits=[(W, '''        if elem.elements:
            self._add_child("ELEMENTS")
            for child_element in elem.elements:
                self._write_value_specification_element(child_element)
            self._leave_child()

    def _write_record_value_specification(''', '''        if elem.elements:
            self._add_child("ELEMENTS")
            previous = None
            for child_element in elem.elements:
                if previous is None or previous is not child_element:
                    self._write_value_specification_element(child_element)
                previous = child_element
            self._leave_child()

    def _write_record_value_specification(''')],
         demo=H + '''
v = ar_element.NumericalValueSpecification(value=1)
e = ar_element.ArrayValueSpecification(elements=[v, v, v])
assert len(back(e).elements) == 3
''', needs='an array value that holds the same value object twice in a row', breaks='repeated elements of an array value are written once'),
    dict(id='B04', property='P03',
         edits=[(R, '''            data["max_val"] = self._read_integer(xml_child.text)
        xml_child = child_elements.get("MIN")
        if xml_child is not None:
            data["min_val"] = self._read_integer(xml_child.text)''', '''            data["max_val"] = self._read_integer(xml_child.text)
        xml_child = child_elements.get("MIN")
        if xml_child is not None:
            data["min_val"] = self._read_integer(xml_child.text)
            if data.get("max_val", data["min_val"]) < data["min_val"]:
                data["max_val"], data["min_val"] = data["min_val"], data["max_val"]''')],
         demo=H + '''
e = ar_element.DataFilter(data_filter_type=ar_enum.DataFilterType.NEW_IS_OUTSIDE, min_val=10, max_val=5)
f = back(e, "DATA-FILTER")
assert (f.min_val, f.max_val) == (10, 5)
''', needs='a data filter whose minimum is above its maximum', breaks='minimum and maximum are swapped by the reader'),
    dict(id='B05', property='P04',
         edits=[(W, '''            self._write_receiver_com_spec_group(elem)
            if elem.queue_length is not None:''', '''            self._write_receiver_com_spec_group(elem)
            if elem.queue_length:''')],
         demo=H + '''
e = ar_element.QueuedReceiverComSpec(queue_length=0, data_element_ref=ar_element.AutosarDataPrototypeRef("/a/b", ar_enum.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE))
assert back(e).queue_length == 0
''', needs='queue length zero', breaks='QUEUE-LENGTH 0 is not written'),
    dict(id='B06', property='P05',
         edits=[(R, '''            data["offset"] = self._read_number(xml_child.text)
        xml_child = child_elements.get("PERIOD")
        if xml_child is not None:
            data["period"] = self._read_number(xml_child.text)
        self._report_unprocessed_elements(child_elements)
        return ar_element.TimingEvent(**data)''', '''            data["offset"] = self._read_number(xml_child.text)
        xml_child = child_elements.get("PERIOD")
        if xml_child is not None:
            data["period"] = self._read_number(xml_child.text)
            if data.get("offset") is not None and data["offset"] >= data["period"]:
                data["offset"] -= data["period"]
        self._report_unprocessed_elements(child_elements)
        return ar_element.TimingEvent(**data)''')],
         demo=H + '''
e = ar_element.TimingEvent("e", offset=0.5, period=0.25)
assert back(e).offset == 0.5
''', needs='a timing event whose offset is not below its period', breaks='the offset is reduced by the period when read'),
    dict(id='B07', property='P06',
         edits=[(R, '''            if xml_child_elem.tag == 'P':
                elem.append(
                    self._read_multi_language_paragraph(xml_child_elem))
            elif xml_child_elem.tag == 'VERBATIM':
                elem.append(self._read_multi_language_verbatim(xml_child_elem))
            else:
                self._report_unprocessed_element(xml_child_elem)
        return elem

    def _read_emphasis''', '''            if xml_child_elem.tag == 'P':
                elem.append(
                    self._read_multi_language_paragraph(xml_child_elem))
        for xml_child_elem in xml_elem.findall('./*'):
            if xml_child_elem.tag == 'P':
                continue
            if xml_child_elem.tag == 'VERBATIM':
                elem.append(self._read_multi_language_verbatim(xml_child_elem))
            else:
                self._report_unprocessed_element(xml_child_elem)
        return elem

    def _read_emphasis''')],
         demo=H + '''
P, V, L = ar_element.MultiLanguageParagraph, ar_element.MultiLanguageVerbatim, ar_enum.Language
e = ar_element.DocumentationBlock()
e.append(V((L.EN, "first")))
e.append(P((L.EN, "second")))
a = ar_element.Annotation(text=e)
text = autosar.xml.Writer().write_str_elem(a)
got = autosar.xml.Reader().read_str_elem(text).text
assert [type(x).__name__ for x in got.elements] == ["MultiLanguageVerbatim", "MultiLanguageParagraph"], got.elements
''', needs='a verbatim before a paragraph in one documentation block', breaks='document order of block elements'),
    dict(id='B08', property='P05',
         edits=[(W, '''            for child in elem.data_send_point:
                self._write_variable_access(child, "VARIABLE-ACCESS")''', '''            for child in sorted(elem.data_send_point, key=lambda item: str(item.name)):
                self._write_variable_access(child, "VARIABLE-ACCESS")''')],
         demo=H + '''
r = ar_element.RunnableEntity("r")
r.append_data_send_point(ar_element.VariableAccess("zz"))
r.append_data_send_point(ar_element.VariableAccess("aa"))
assert [x.name for x in back(r).data_send_point] == ["zz", "aa"]
''', needs='two data send points not in alphabetical order', breaks='the order of data send points'),
]
BUGS[0]['edits'] = BUGS[0]['edits'][1:]
