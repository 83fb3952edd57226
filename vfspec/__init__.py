"""Specifications (contracts) of cogu/autosar: plain Python over the real code, checked by vf."""


class Spec:
    """fn(*inputs) is a specification function; inputs: [(name, domain)].
    root: name of the input whose own codec contract must not be assumed while proving it.
    bounded: reason why this specification is only checked on bounded inputs."""

    def __init__(self, name, fn, inputs, title='', root=None, covers=(), **opts):
        self.name, self.fn, self.inputs, self.title = name, fn, list(inputs), title
        self.root, self.covers, self.opts = root, tuple(covers), opts
