"""LooseObjectDB.store when anything fails, and at every moment in between"""
from .loosemodels import *


class FailingStore(Store):
    name = 'C11.store'
    fails = True
    cases = ['new', 'known']
    assumptions = ['a failing or interrupted call has done nothing, except that a failing close has closed and a failing write may have written a part',
                   'removing the temporary file succeeds', 'rename replaces in one step']

    def setup(self, c):
        r = super().setup(c)
        c.fs.interrupts = True
        return r

    def post(self, c, ret):
        objs = [o for o in c.fs.f['files'] if c.fs.classify(o[0])[0] == 'object' and o[1] is not None]
        out = [self.no_temp(c), ('the object is there', len(objs) == 1)]
        for path, node in objs:
            number = c.fs.classify(path)[1]
            out.append(('the object is the one from before or the complete new one', node.owner == 'before' or self.complete(c, node, number)))
            out.append(('the id returned is that of the object', eq(key_of(as_sbytes(c.ip.getattr(ret, 'binsha'))), number) if isinstance(ret, SObj) else False))
        return out

    def exc(self, c, e):
        self.moment(c, 'end')
        return [('an error only if something failed', bool(c.fs.failed) or c.src.f.get('failed') is True or any(f.f['failed'] is True or f.f['short'] is True for f in c.fs.fds)),
                self.no_temp(c)]


CONTRACTS = [FailingStore(), STREAM_COPY, FORWARD_READ]
LEVEL = 'proof'
