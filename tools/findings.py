"""Source of known-findings.json (run: python3 tools/findings.py)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('P07', 'fix: escape special', 'texts and attribute values containing & < > or " were written unescaped (output not well-formed or read back differently)'),
    ('P08', 'fix: format floats', 'writing a float of magnitude >= 1e28 raised decimal.InvalidOperation'),
    ('P03', 'fix: write the UUID', 'the UUID attribute of most identifiable elements was read but never written'),
    ('P06', 'fix: read mixed content', 'E, IE, SUB, SUP and BR elements inside mixed content raised an exception or lost the text that follows them'),
    ('P04', 'fix: PRPortPrototype accepts', 'a PRPortPrototype with a list of provided com-specs raised an exception'),
    ('P06', 'fix: accept superscript', 'superscript and line-break parts of mixed content were rejected'),
    ('P03', 'fix: support SERVICE-KIND', 'SERVICE-KIND of a port interface could not be written or read'),
    ('P08', 'fix: write numerical', 'numerical values in hexadecimal, binary and scientific format lost digits'),
    ('P06', 'fix: write all annotations', 'every annotation was written in its own ANNOTATIONS element, of which only the last was read back'),
    ('P01', 'fix: read the VALIDITY', 'the VALIDITY attribute of scale constraints was not read'),
    ('P01', 'fix: keep a unit name', 'a unit display name given as a text was split into one part per character'),
    ('P08', 'fix: read numbers in hex', 'numbers in hexadecimal and binary notation could not be read'),
    ('P14', 'fix: set the parent', 'parts of data types, mode groups and behaviors had no parent, so that no reference to them could be made'),
    ('P13', 'fix: find returns None', 'find raised an exception for a path below an element, or did not lead to the nested part'),
    ('P13', 'fix: raise the errors', 'duplicate and invalid packages raised the wrong exception, or none'),
    ('P15', 'fix: make names of runnable', 'the names made for parts of runnables and for events could already be in use'),
    ('P14', 'fix: accept a single possible', 'a single possible error of a client-server interface was rejected'),
    ('P03', 'fix: keep introduction', 'an identifiable element with INTRODUCTION, ANNOTATIONS or ADMIN-DATA could not be read or lost them'),
    ('P03', 'fix: read admin data', 'ADMIN-DATA without special data groups raised an exception when read'),
    ('P10', 'fix: keep the path of the physical', 'a unit given the path of its physical dimension referred to its own display name instead'),
    ('P10', 'fix: report a missing DEST', 'a reference without kind, where several are possible, failed with an unrelated TypeError'),
    ('P10', 'fix: accept a list of paths', 'a list of paths as possible errors of an operation was rejected'),
    ('P01', 'fix: a conversion with a denominator', 'a conversion with a denominator and no numerator was written but could not be read back (TypeError)'),
    ('P10', 'fix: check the references', 'unit_ref and the references of data type maps were not converted or checked, so that writing failed'),
    ('P11', 'fix: accept a text as label', 'a text as label of a value group was rejected, and SwValues given as its values were dropped'),
    ('P16', 'fix: Reader resumes at the next element whatever', 'a document with an element whose number, enumeration text or reference is invalid was not read at all'),
    ('P17', 'fix: write_documents leaves', 'writing documents took the packages and elements out of the workspace, failed when called again, and wrote nested packages at the top'),
    ('P17', 'fix: accept a single suffix', 'a single suffix filter of a document mapping was rejected'),
    ('P17', 'fix: accept a document without', 'a document created without packages was rejected'),
    ('P18', 'fix: keep a communication spec', 'a finished com-spec given to create_p_port or create_r_port on its own was not kept'),
    ('P18', 'fix: reject unknown data elements and op', 'unknown data elements or operations of a require-port raised a TypeError'),
    ('P18', 'fix: delegation and', 'delegation and pass-through connectors that are created had no parent'),
    ('P18', 'fix: create_connector rejects', 'create_connector accepted a component that the composition does not have'),
    ('P18', 'fix: a pass-through', 'a pass-through connector provided at its require-port when its ports were given in the other order'),
    ('P19', 'fix: create_port_access leaves', 'the arguments given to create_port_access were changed'),
    ('P19', 'fix: create_port_access finds', 'access of the only parameter of an interface without naming it raised an AttributeError'),
    ('P19', 'fix: create_port_access rejects acc', 'accesses that the port does not offer were silently not created'),
    ('P19', 'fix: create_port_access rejects a mode', 'access of named modes of an interface without modes raised an AttributeError'),
    ('P20', 'fix: a limit that is not given', 'check_value of a constraint with only one limit raised a TypeError'),
    ('P21', 'fix: array types keep', 'array types with an implementation policy, size handling or size semantics raised a ValueError'),
    ('P21', 'fix: reference types keep', 'type references with another type emitter than RTE were defined in the RTE header'),
    ('P21', 'fix: a type that is asked for', 'types asked for after others that need them were missing in the header; a type that could not be created made the generator raise a KeyError'),
    ('P11', 'fix: a computation has', 'two computations made from one list of scales shared it: a scale appended to one was in the other'),
    ('P21', 'fix: the type header declares', 'the condition around the C linkage of the type header was inverted'),
]
OPEN = []


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    out = []
    for prop, start, what in FIXED:
        h = [x.split()[0] for x in log if x.split(' ', 1)[1].startswith(start)]
        assert len(h) == 1, (start, h)
        out.append(dict(property=prop, status='fixed', spec='', commit=h[0], what='fixed: property=%s %s %s' % (prop, h[0], what)))
    for prop, spec, what in OPEN:
        out.append(dict(property=prop, status='open', spec=spec, what=what))
    json.dump(out, open(os.path.join(ROOT, 'known-findings.json'), 'w'), indent=1)


main()
