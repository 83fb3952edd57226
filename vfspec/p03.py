from .roundtrip import group


def specs():
    return group('P03')
