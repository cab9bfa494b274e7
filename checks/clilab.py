"""Shared helpers of the analyses of the command-line programs: an abstract
process with arguments, standard streams and a model file system."""
from .baselab import *
from vf.models import VFile, DIR

NUMS = (int, float)


class Proc:
    """outcome of one abstract process"""

    def __init__(self, lab, o, before):
        self.lab, self.o = lab, o
        it = lab.it
        self.out = it.stdout._data()
        self.err = it.stderr._data()
        self.files = {k: v for k, v in it.vfs.items()}
        self.before = before
        self.events = list(it.events)
        if o.ok:
            r = o.value
            # console scripts: sys.exit(main())
            self.status = 0 if r is None else int(r) if isinstance(r, int) \
                else 1
        elif isinstance(o.exc, SystemExit):
            c = o.exc.code
            self.status = 0 if c is None else c if isinstance(c, int) else 1
        else:
            self.status = 1

    @property
    def changed(self):
        """files written, created or removed"""
        return sorted(k for k in set(self.files) | set(self.before)
                      if self.files.get(k) != self.before.get(k))

    def show(self):
        return 'status %s, %s' % (self.status, self.o.show())

    def where(self, default):
        return default if self.o.ok or isinstance(self.o.exc, SystemExit) \
            else self.o.where()


def process(ctx, lab, entry, argv, stdin=None, files=None):
    """run the console script `entry` of wcxf.cli abstractly"""
    it = lab.it
    cli = lab.mod('wcxf.cli')
    it.argv[:] = ['wcxf'] + list(argv)
    if stdin is not None:
        it.stdin._text = stdin
        it.stdin._pos = 0
    for k, v in (files or {}).items():
        it.vfs[k] = v
    before = dict(it.vfs)
    n = len(it.events)
    o = ctx.run(lambda: lab.call(getattr(cli, entry)))
    p = Proc(lab, o, before)
    p.events = p.events[n:]
    return p


def dumps(lab, doc, fmt, **kw):
    """text of a document in which abstract numbers are kept"""
    if fmt == 'json':
        return lab.call(lab.mod('json').dumps, doc, **kw)
    kw.setdefault('default_flow_style', False)
    return lab.call(lab.mod('yaml').dump, doc, **kw)


def loads(ctx, lab, text, fmt):
    """(ok, document)"""
    if fmt == 'json':
        o = ctx.run(lambda: lab.call(lab.mod('json').loads, text))
    else:
        o = ctx.run(lambda: lab.call(lab.mod('yaml').load, text))
    return (True, plain(o.value)) if o.ok else (False, o.show())
