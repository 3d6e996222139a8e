"""What node code under test reports to the harness."""
log = []


def clear():
    del log[:]


def add(*a):
    log.append(a[0] if len(a) == 1 else a)


def show(v):
    """A value with its type, as text."""
    return '%s %r' % (type(v).__name__, v)


def of(obj, attr):
    try:
        return show(getattr(obj, attr))
    except AttributeError:
        return 'UNDEFINED'


def me(node):
    """Path of the running node."""
    return getattr(node, '_node_path', None) or '/'

stash = None
