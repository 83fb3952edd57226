"""Preconditions relating several constructor parameters of one class (frozen domain knowledge:
argument combinations that have no meaning in AUTOSAR XML)."""


def _limits(e):
    """An interval end that is not given cannot be open or infinite."""
    from autosar.xml.enumeration import IntervalType
    return ((e.lower_limit is not None or e.lower_limit_type == IntervalType.CLOSED) and
            (e.upper_limit is not None or e.upper_limit_type == IntervalType.CLOSED))


def _default_pattern(e):
    from autosar.xml.enumeration import ValueFormat
    return e.default_pattern is not None or e.default_pattern_format == ValueFormat.DEFAULT


PROVIDED = 'ABSTRACT_PROVIDED_PORT_PROTOTYPE P_PORT_PROTOTYPE PR_PORT_PROTOTYPE'.split()
REQUIRED = 'ABSTRACT_REQUIRED_PORT_PROTOTYPE R_PORT_PROTOTYPE PR_PORT_PROTOTYPE'.split()


def _kind(r, names):
    from autosar.xml.enumeration import IdentifiableSubTypes
    return any(r.dest is getattr(IdentifiableSubTypes, n) for n in names)


def _port_ref(r, provide, require):
    return r is None or r.port_ref is None or (provide and _kind(r.port_ref, PROVIDED)) or (require and _kind(r.port_ref, REQUIRED))


def _assembly(e):
    """The provider of an assembly connector is a port that provides, the requester one that requires."""
    return _port_ref(e.provide_port, True, False) and _port_ref(e.require_port, False, True)


def _delegation(e):
    """The inner port of a delegation connector has a known direction."""
    return e.inner_port is None or (e.inner_port.port_ref is not None and _port_ref(e.inner_port, True, True))


CONSTRAINTS = {
    'CompuScale': _limits,
    'ScaleConstraint': _limits,
    'InternalConstraint': _limits,
    'PhysicalConstraint': _limits,
    'NotAvailableValueSpecification': _default_pattern,
    'AssemblySwConnector': _assembly,
    'DelegationSwConnector': _delegation,
}
